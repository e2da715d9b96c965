// C27: messages through the modules mangler, exploder, incrementer and buffer
#include "common.hpp"
#include "model_topic.hpp"
#include <map>
#include <set>
#include <memory>
#include <functional>
extern "C" {
#include "lib/array.h"
#include "lib/settings.h"
#include "lib/messages/msg_msg.h"
#include "lib/message_holder/message_holder.h"
#include "lib/message_holder/message_holder_struct.h"
#include "lib/util/rrr_time.h"
#include "c27_glue.h"
}
VP_LOG_PREFIX
#include "c27_msg.hpp"
static std::vector<M> g_out; static std::function<void()> g_case; static int g_write_fail; static std::function<int(int, std::string, uint64_t &)> g_db;
extern "C" void c27_case(void) { auto c = g_case; g_case = nullptr; CHECK((bool) c, "started twice"); c(); }
extern "C" int c27_written(struct rrr_msg_holder *e) { if (g_write_fail && --g_write_fail == 0) return 1; g_out.push_back(read(e)); return 0; }
extern "C" int c27_db(int op, const char *t, uint16_t l, uint64_t *id) { CHECK((bool) g_db, "the message database is used"); return g_db(op, std::string(t, l), *id); }
static bool run(int module, const std::string &conf, std::function<void()> c) { std::string t = "[x]\n" + conf; struct rrr_instance_config_collection *col = NULL; CHECK(rrr_instance_config_parse_string(&col, t.data(), (rrr_length) t.size()) == 0, "configuration %s", conf.c_str()); g_case = c; c27_run(module, RRR_LL_FIRST(col)); bool started = !g_case; g_case = nullptr; rrr_instance_config_collection_destroy(col); return started; }
static std::vector<M> feed(const std::vector<M> &in, int *ret = NULL) { std::vector<struct rrr_msg_holder *> h; for (auto &m : in) h.push_back(make(m)); g_out.clear(); int r = c27_feed(h.data(), h.size()); if (ret) *ret = r; else CHECK(r == 0, "return %d", r); return g_out; }
static std::string tagname(Src &s) { return s.pick({"a", "b", "id", "ab", "", "A"}); }
static V value(Src &s) { V v; v.tag = tagname(s); switch (s.weighted({4, 4, 3, 1, 1})) { case 3: v.t = 'v'; break; case 4: v.t = 'e'; v.data = s.chars(1 + s.len(3), ",;/\n"); break; case 0: v.t = 'h'; if (s.chance(1, 6)) { v.n = s.u(1) * s.u(300); break; } v.n = s.flip() ? s.u(1000) : s.u64(); if (s.flip()) { v.neg = true; if (s.flip()) v.n = 0 - v.n; } break; case 1: v.t = 's'; v.data = s.flip() ? std::to_string(s.u(1u << s.n(30))) : s.chars(s.len(5), "abcxyz"); if (s.chance(1, 4)) v.data = "-" + v.data; if (v.data == "-") v.data = "x"; break; default: v.t = 'b'; v.data = s.bytes_cheap(s.len(6)); if (v.data.empty()) v.data = "b"; } return v; }
static M message(Src &s) { M m; m.ts = 1 + s.u(1u << 30); if (s.chance(3, 4)) for (size_t k = s.len(3); k; k--) m.topic += (m.topic.empty() ? "" : "/") + std::string(s.pick({"a", "b", "c", "dd"})); m.array = s.chance(5, 6); if (m.array) { for (size_t k = 1 + s.len(5); k; k--) m.v.push_back(value(s)); } else m.data = s.bytes_cheap(s.len(8)); if (s.chance(1, 8)) m.type = s.pick({MSG_TYPE_PUT, MSG_TYPE_GET, MSG_TYPE_DEL, MSG_TYPE_TAG}); return m; }
static std::string yn(Src &s, const char *name, bool &b) { b = s.flip(); return b || s.flip() ? std::string(name) + "=" + (b ? "yes" : "no") + "\n" : ""; }
static bool number(const std::string &d, V &o) { bool n = d[0] == '-'; if (d.size() == n) return false; for (size_t i = n; i < d.size(); i++) if (d[i] < '0' || d[i] > '9') return false; o.neg = n; o.n = strtoull(d.c_str() + n, NULL, 10); if (n) o.n = 0 - o.n; return true; }
static bool is_str(char t, bool tol) { return t == 's' || (tol && t == 'e'); }
static bool is_blob(char t, bool tol) { return t == 'b' || (tol && (t == 's' || t == 'e')); }
// One conversion method, false if it is not possible. Not decided: a value which has the target type already with blob2hex
static bool convert(const std::string &c, V &v, bool ts, bool tb) {
	V o = v; o.n = 0; o.neg = false; o.data.clear();
	if (c == "h2str") { if (v.t != 'h') return false; o.t = 's'; o.data = v.neg ? std::to_string((int64_t) v.n) : std::to_string(v.n); }
	else if (c == "hchar2str") { if (v.t != 'h' || v.n > 255) return false; o.t = 's'; o.data = std::string(1, (char) v.n); }
	else if (c == "h2vain") { if (v.t != 'h' || v.n) return false; o.t = 'v'; }
	else if (c == "vain2h") { if (v.t != 'v') return false; o.t = 'h'; }
	else if (c == "vain2str") { if (v.t != 'v') return false; o.t = 's'; }
	else if (c == "str2vain") { if (!is_str(v.t, ts) || !v.data.empty()) return false; o.t = 'v'; }
	else if (c == "str2h") { if (!is_str(v.t, ts) || !number(v.data, o)) return false; o.t = 'h'; o.data.clear(); }
	else if (c == "str2blob") { if (!is_str(v.t, ts) || v.data.empty()) return false; o.t = 'b'; o.data = v.data; }
	else if (c == "str2str") { if (!is_str(v.t, ts)) return false; o.t = 's'; o.data = v.data; }
	else if (c == "blob2hex") { if (!is_blob(v.t, tb)) return false; o.t = 's'; char b[3]; for (unsigned char x : v.data) { sprintf(b, "%02x", x); o.data += b; } }
	else if (c == "blob2blob") { if (!is_blob(v.t, tb)) return false; o.t = 'b'; o.data = v.data; }
	else if (c == "blob2str") { if (!is_blob(v.t, tb)) return false; o.t = 's'; o.data = v.data; }
	v = o; return true;
}
static bool ambiguous(const std::vector<std::string> &c, V v, bool ts, bool tb) { for (auto &x : c) { if (x == "blob2str" && v.t == 'b') for (unsigned char ch : v.data) if (ch < 32 || ch > 126) return true; if (x == "blob2hex" && tb && v.t == 's') return true; if (v.t == 's' && v.data.empty() && (x == "blob2blob" || x == "blob2hex")) return true; if (x == "str2h" && is_str(v.t, ts) && !v.data.empty()) { V o; bool num = number(v.data, o), alpha = false; for (unsigned char ch : v.data) if (ch > 32 && ch < 127 && !strchr("0123456789+-", ch)) alpha = true; if (v.data.size() > 18 || (!alpha && !num)) return true; if (num && o.neg && o.n == 0) return true; } convert(x, v, ts, tb); } return false; }
static void mangler(Src &s) {
	std::string conf = "module=mangler\n", topic; std::vector<std::string> conv; std::set<std::string> clear; bool pass; conf += yn(s, "mangler_non_array_passthrough", pass);
	if (s.flip()) { topic = s.pick({"new", "a/new/topic"}); conf += "mangler_topic=" + topic + "\n"; }
	if (s.chance(2, 3)) { std::string l; for (size_t k = 1 + s.len(3); k; k--) { conv.push_back(s.chance(1, 3) ? s.pick({"blob2blob", "str2str", "h2vain", "hchar2str", "str2vain", "vain2h", "vain2str"}) : s.pick({"h2str", "str2h", "str2blob", "blob2hex", "blob2str"})); l += (l.empty() ? "" : ",") + conv.back(); } conf += "mangler_conversions=" + l + "\n"; }
	if (s.flip()) { std::string l; for (size_t k = 1 + s.len(3); k; k--) { std::string t = tagname(s); if (t.empty()) continue; clear.insert(t); l += (l.empty() ? "" : ",") + t; } if (!clear.empty()) conf += "mangler_clear_tags=" + l + "\n"; }
	bool ts = false, tb = false; conf += yn(s, "mangler_convert_tolerant_strings", ts) + yn(s, "mangler_convert_tolerant_blobs", tb);
	std::vector<M> in, want; bool any = false, changed = false;
	for (size_t k = s.len(3); k; k--) { M m = message(s); bool amb = false; for (auto &v : m.v) if (ambiguous(conv, v, ts, tb)) amb = true; if (amb) continue; in.push_back(m); if (!m.array) { if (pass) want.push_back(m); continue; } M o = m; if (!conv.empty() || !clear.empty()) { o.v.clear(); o.type = MSG_TYPE_MSG; for (auto v : m.v) { if (clear.count(v.tag)) { changed = true; continue; } for (auto &c : conv) if (convert(c, v, ts, tb)) changed = true; o.v.push_back(v); } } if (!topic.empty()) o.topic = topic; want.push_back(o); any = true; }
	desc("%s", show(conf).c_str()); std::vector<M> got; CHECK(run(C27_MANGLER, conf, [&] { got = feed(in); }), "the module does not start: %s", conf.c_str()); CHECK(got.size() == want.size(), "%zu messages of %zu", got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) CHECK(same(got[i], want[i], !want[i].array || (conv.empty() && clear.empty())), "%s: wrote %s, expected %s", show(conf).c_str(), str(got[i]).c_str(), str(want[i]).c_str()); if (any && changed) nontrivial(); label_if(!clear.empty() && conv.empty(), "only cleared");
}
static void exploder(Src &s) {
	std::string conf = "module=exploder\n", topic; bool pass, orig, ts, tp, tag; conf += yn(s, "exploder_non_array_passthrough", pass) + yn(s, "exploder_original_passthrough", orig) + yn(s, "exploder_preserve_timestamp", ts) + yn(s, "exploder_preserve_topic", tp) + yn(s, "exploder_topic_append_tag", tag); if (s.flip()) { topic = s.pick({"new", "a/new/topic", "/x"}); conf += "exploder_topic=" + topic + "\n"; }
	std::vector<M> in, want; std::vector<int> kind; for (size_t k = s.len(3); k; k--) { M m = message(s); in.push_back(m); if (!m.array) { if (pass) { want.push_back(m); kind.push_back(-1); } continue; } for (auto &v : m.v) { M o = m; o.type = MSG_TYPE_MSG; o.v = {v}; o.topic = (tp ? m.topic : "") + topic + (tag ? v.tag : ""); want.push_back(o); kind.push_back((int) k); } if (orig) { want.push_back(m); kind.push_back(-1); } }
	desc("%s", show(conf).c_str()); std::vector<M> got; uint64_t t0 = rrr_time_get_64(), t1 = 0; CHECK(run(C27_EXPLODER, conf, [&] { got = feed(in); }), "the module does not start"); t1 = rrr_time_get_64(); CHECK(got.size() == want.size(), "%zu messages of %zu", got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) { CHECK(same(got[i], want[i], ts || kind[i] < 0), "%s: wrote %s, expected %s", show(conf).c_str(), str(got[i]).c_str(), str(want[i]).c_str()); if (!ts && kind[i] >= 0) { CHECK(got[i].ts >= t0 && got[i].ts <= t1, "time"); if (i && kind[i - 1] == kind[i]) CHECK(got[i].ts == got[i - 1].ts, "two times from one message"); nontrivial(); } else if (kind[i] >= 0) nontrivial(); }
}
static void buffer(Src &s) {
	uint32_t ttl = s.flip() ? 0 : s.chance(1, 3) ? 4000 + (uint32_t) s.u(100000000) : 100 + (uint32_t) s.u(1000); std::vector<M> in, want; uint64_t now = rrr_time_get_64(); for (size_t k = s.len(4); k; k--) { M m = message(s); bool old = s.flip(); m.ts = now - (uint64_t) (old ? ttl + 20 + s.u(1000) : s.u(80)) * 1000000u; in.push_back(m); if (!ttl || !old) want.push_back(m); }
	std::vector<M> got; CHECK(run(C27_BUFFER, "module=buffer\n" + (ttl ? "buffer_ttl_seconds=" + std::to_string(ttl) + "\n" : std::string()), [&] { got = feed(in); }), "the module does not start"); CHECK(got.size() == want.size(), "%zu messages of %zu", got.size(), want.size()); for (size_t i = 0; i < got.size(); i++) CHECK(same(got[i], want[i], true), "wrote %s, expected %s", str(got[i]).c_str(), str(want[i]).c_str()); if (!got.empty()) nontrivial(); label_if(got.size() < in.size(), "expired");
}
static void incrementer(Src &s) {
	uint64_t mod = s.flip() ? 1 : s.chance(1, 10) ? 255 : 1 + s.u(12), pos = s.chance(1, 3) ? 0 : s.n(mod - 1), min = s.chance(1, 3) ? 0xffffffffu - s.u(400) : 1 + s.u(40), max = s.chance(1, 3) ? 0xffffffffu : min + (s.chance(1, 10) ? s.u(mod) : mod - 1 + s.u(60)); if (s.chance(1, 4)) { min = 1; max = 0xffffffffu; } int bits = 0; while (bits < 40 && (max >> bits)) bits++;
	uint64_t prefix = s.chance(1, 3) ? (s.flip() ? s.u(100) : s.chance(1, 8) ? s.u64() >> s.n(20) : s.u64() >> bits) : 0; int pb = 0; while (pb < 64 && (prefix >> pb)) pb++; bool ok = max <= 0xffffffffu && min <= max && max - min + 1 >= mod && pos < mod && pb + bits <= 64; std::string filter = s.pick({"s/#", "s/+", "s/a/#", "+/a", "#", "s/a"}); bool tag = s.flip(), db = s.flip();
	std::string conf = "module=incrementer\nincrementer_subject_topic_filter=" + filter + "\n"; auto opt = [&](const char *n, uint64_t v, uint64_t d) { if (v != d || s.flip()) conf += std::string("incrementer_id_") + n + "=" + std::to_string(v) + "\n"; }; opt("min", min, 1); opt("max", max, 0xffffffffu); opt("modulus", mod, 1); opt("position", pos, 0); opt("prefix", prefix, 0); if (tag) conf += "incrementer_id_tag=id\n"; if (db) conf += "incrementer_msgdb_socket=/nonexistent\n"; desc("%s", show(conf).c_str());
	std::map<std::string, uint64_t> used, init, stored; std::map<std::string, std::set<uint64_t>> given; int fail = 0; bool did_fail = false; g_db = [&](int op, std::string t, uint64_t &id) { CHECK(db, "no message database"); if (fail) { did_fail = true; return fail; } if (op) { stored[t] = id; return 0; } if (!stored.count(t)) return 1; id = stored[t]; return 0; };
	auto top = [&] { return s.chance(1, 10) ? std::string(s.pick({"", "s", "x/a", "s/a/b"})) : s.pick({"s/a", "s/b", "s/abc"}); }; uint64_t mask = bits < 64 ? ~0ull << bits : 0; int rounds = 1 + (int) s.n(2); uint64_t last = 0;
	for (int r = 0; r < rounds; r++) {
		bool started = run(C27_INCREMENTER, conf, [&] {
			CHECK(ok, "started with a configuration which is not valid: %s", conf.c_str()); used.clear(); init.clear();
			for (size_t k = 1 + s.len(12); k; k--) {
				M m = message(s); m.topic = top(); bool match = !m.topic.empty() && t_match(filter, m.topic); bool has = false; uint64_t idv = 0; if (m.array) { bool want_id = s.flip(); std::vector<V> v; for (auto &x : m.v) if (x.tag != "id") v.push_back(x); m.v = v; if (want_id || v.empty()) { V x; x.t = 'h'; x.tag = want_id ? "id" : "z"; uint64_t p = prefix ? (s.chance(1, 6) ? prefix ^ 1 : prefix) : s.flip() ? 0 : bits >= 32 ? s.u(100) : s.u64() >> (bits + 8); x.n = (s.chance(1, 3) ? max - s.u(2 * mod) : s.u(300)); x.n &= ~mask; x.n |= p << bits; m.v.push_back(x); if (want_id) { has = true; idv = x.n; } } }
				fail = db && s.chance(1, 8) ? s.pick({1, 2}) : 0; did_fail = false; if (fail == 1 && false) fail = 0; desc("%s fail %d", str(m).c_str(), fail); auto before = stored; std::vector<M> got = feed({m}); for (auto &x : got) desc("-> %s", str(x).c_str());
				if (!match) { CHECK(got.size() == 1 && same(got[0], m, true), "another message is changed: %s", str(m).c_str()); label("forwarded"); continue; }
				if (tag && has) { CHECK(got.empty(), "an initial ID is forwarded"); if (prefix && (idv & mask) != prefix << bits) { label("wrong prefix"); continue; } init[m.topic] = idv; continue; }
				// The ID before this one
				uint64_t old = 0; bool known = false, drop = false; if (used.count(m.topic)) { old = used[m.topic]; known = true; } else if (db && fail == 2) drop = true; else if (db && !fail && before.count(m.topic)) { old = before[m.topic]; known = true; } else if (init.count(m.topic)) { old = init[m.topic]; known = true; }
				if (!known && tag) drop = true; if (old && prefix && (old & mask) != prefix << bits) drop = true; if (db && fail) drop = true;
				if (drop) { CHECK(got.empty(), "a message without ID"); label("dropped"); continue; }
				CHECK(got.size() == 1, "%zu messages for %s", got.size(), str(m).c_str()); CHECK(got[0].topic.compare(0, m.topic.size() + 1, m.topic + "/") == 0, "topic %s", got[0].topic.c_str()); char *e = NULL; uint64_t id = strtoull(got[0].topic.c_str() + m.topic.size() + 1, &e, 10); CHECK(*e == 0 && got[0].topic == m.topic + "/" + std::to_string(id), "topic %s", got[0].topic.c_str()); { M c = got[0]; c.topic = m.topic; CHECK(same(c, m, true), "the message is changed: %s, was %s", str(c).c_str(), str(m).c_str()); }
				uint64_t v = id & ~mask, p = id >> (bits & 63), ov = old & ~mask, op = old >> (bits & 63); CHECK(p == (op ? op : prefix), "prefix %llu, before %llu, configured %llu", (unsigned long long) p, (unsigned long long) op, (unsigned long long) prefix); CHECK(v >= min && v <= max && v % mod == pos, "ID %llu is not one of this generator", (unsigned long long) v);
				uint64_t next = ov - ov % mod + mod + pos; if (next > max || next < min) { next = min - min % mod + pos; if (next < min) next += mod; label("wrapped"); } CHECK(v == next, "%s: ID %llu after %llu, expected %llu", m.topic.c_str(), (unsigned long long) v, (unsigned long long) ov, (unsigned long long) next); used[m.topic] = id; if (db) CHECK(stored.count(m.topic) && stored[m.topic] == id, "the ID is not stored"); nontrivial(); last = id; label_if(p != 0, "prefix");
			}
		});
		CHECK(started == ok, "the module %s: %s", started ? "starts" : "does not start", show(conf).c_str()); if (!ok) break;
	}
	(void) last;
}
VP_TARGET(mangler, 120000, "an array message in which a value is converted or deleted");
VP_TARGET(exploder, 80000, "a message for a value");
VP_TARGET(buffer, 15000, "a message is passed on");
VP_TARGET(incrementer, 120000, "an ID is generated");
static void init() { vp_lib_init(); }
VP_MAIN(init)
