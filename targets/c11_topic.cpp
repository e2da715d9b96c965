// C11: MQTT topic filters match as the standard has it, and the ACL grants exactly what its file says
#include "model_topic.hpp"
extern "C" {
#include "lib/mqtt/mqtt_topic.h"
#include "lib/mqtt/mqtt_acl.h"
#include "lib/messages/msg_msg.h"
#include "lib/util/utf8.h"
}
VP_LOG_PREFIX
using namespace vp;

// A copy of exactly the right size, to notice reads outside
struct Exact { char *p; size_t n; Exact(const std::string &s, bool z) : n(s.size()) { p = (char *) malloc(n + z); memcpy(p, s.data(), n); if (z) p[n] = 0; } ~Exact() { free(p); } };

static bool utf8_ok(const std::string &s) {
	for (size_t i = 0; i < s.size();) {
		uint8_t c = (uint8_t) s[i]; size_t n = c < 0x80 ? 1 : c >= 0xc2 && c <= 0xdf ? 2 : c >= 0xe0 && c <= 0xef ? 3 : c >= 0xf0 && c <= 0xf4 ? 4 : 0;
		if (!n || i + n > s.size()) return false;
		uint32_t v = n == 1 ? c : c & (0xff >> (n + 1)); for (size_t k = 1; k < n; k++) { uint8_t d = (uint8_t) s[i + k]; if ((d & 0xc0) != 0x80) return false; v = v << 6 | (d & 63); }
		if ((n == 3 && (v < 0x800 || (v >= 0xd800 && v <= 0xdfff))) || (n == 4 && (v < 0x10000 || v > 0x10ffff))) return false;
		i += n;
	}
	return true;
}

static void match(Src &s) {
	std::string topic = t_topic(s), filter = t_filter(s, topic); if (s.chance(1, 20)) topic = t_topic(s);
	if (s.chance(1, 40)) { for (size_t n = s.n(300); n--;) { topic += "/x"; filter += s.flip() ? "/+" : "/x"; } }
	if (!t_filter_ok(filter)) discard();
	desc("filter %s topic %s ", show(filter).c_str(), show(topic).c_str());
	Exact f(filter, true), t(topic, true), te(topic, false);
	CHECK(rrr_mqtt_topic_filter_validate_name(f.p) == 0, "filter not accepted"); CHECK(rrr_mqtt_topic_validate_name(t.p) == 0, "topic not accepted"); CHECK(rrr_mqtt_topic_validate_name_with_end(te.p, te.p + te.n) == 0, "topic not accepted");
	bool want = t_match(filter, topic); label(want ? "match" : "mismatch"); if (want && filter != topic) nontrivial(); desc("%s", want ? "match" : "mismatch");
	int w = want ? RRR_MQTT_TOKEN_MATCH : RRR_MQTT_TOKEN_MISMATCH, r;
	CHECK((r = rrr_mqtt_topic_match_str(f.p, t.p)) == w, "match_str %d", r);
	CHECK((r = rrr_mqtt_topic_match_str_with_end(f.p, te.p, te.p + te.n)) == w, "match_str_with_end %d", r);
	CHECK((r = rrr_mqtt_topic_match_topic_and_linear_with_end(te.p, te.p + te.n, f.p, f.p + f.n)) == w, "match_linear %d", r);
	struct rrr_mqtt_topic_token *a = NULL, *b = NULL, *c = NULL;
	CHECK(rrr_mqtt_topic_tokenize(&a, f.p) == 0 && rrr_mqtt_topic_tokenize_with_end(&b, te.p, te.p + te.n) == 0 && rrr_mqtt_topic_tokens_clone(&c, a) == 0, "tokenize");
	auto lv = t_levels(filter); size_t i = 0; for (auto *k = c; k; k = k->next, i++) CHECK(i < lv.size() && lv[i] == k->data, "level %zu of the filter is %s", i, k->data); CHECK(i == lv.size(), "%zu levels", i);
	CHECK((r = rrr_mqtt_topic_match_tokens_recursively(c, b)) == w, "tokens %d", r);
	struct rrr_msg_msg *m = NULL; std::string d = s.pick({"$", "", "/", "x"});
	CHECK(rrr_msg_msg_new_with_data(&m, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, topic.data(), (rrr_u16) topic.size(), d.data(), (rrr_u32) d.size()) == 0, "message");
	int does = -1; CHECK(rrr_msg_msg_topic_match(&does, m, a) == 0 && does == want, "message match %d", does); rrr_free(m);
	rrr_mqtt_topic_token_destroy(a); rrr_mqtt_topic_token_destroy(b); rrr_mqtt_topic_token_destroy(c);
}
VP_TARGET_NOLEAK(match, 200000, "a topic and a filter mostly derived from it by replacing, adding and removing levels; non-trivial: they match and differ");

static void validate(Src &s) {
	std::string t; size_t n = s.len(12);
	if (s.flip()) for (size_t i = 0; i < n; i++) t += s.pick({"/", "#", "+", "a", "$", "\xc3\xa6", "\xe2\x82\xac", "\xf0\x9f\x98\x80", " "}); else t = t_filter(s, t_topic(s));
	if (s.chance(1, 3)) { size_t p = s.u(t.size()); t.insert(p, s.flip() ? s.bytes(1 + s.u(2)) : s.pick({"\xc0\x80", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xe0\x80\x80", "\xc3", "\xf0\x9f\x98", "\xf5\x80\x80\x80", "\x80", "+", "#"})); }
	std::string z; for (char c : t) if (c) z += c; t = z; if (s.chance(1, 300)) t = std::string(65530 + s.u(10), 'x');
	desc("%s", show(t, 60).c_str()); Exact x(t, true), e(t, false);
	bool u = utf8_ok(t), wf = u && t_filter_ok(t) && t.size() <= 65535, wt = u && !t.empty() && t.find_first_of("#+") == std::string::npos;
	label(wf ? "valid filter" : "invalid filter"); label_if(wt, "valid topic"); if (!t.empty() && !wt) nontrivial();
	if (!t.empty()) CHECK(!rrr_mqtt_topic_filter_validate_name(x.p) == wf, "filter accepted %d, want %d", !wf, wf);
	CHECK(!rrr_mqtt_topic_validate_name(x.p) == wt, "topic accepted %d, want %d", !wt, wt);
	CHECK(!rrr_mqtt_topic_validate_name_with_end(e.p, e.p + e.n) == wt, "topic (end) accepted %d, want %d", !wt, wt);
	CHECK(!rrr_utf8_validate(e.p, (rrr_length) e.n) == u, "UTF-8 accepted %d, want %d", !u, u);
}
VP_TARGET_NOLEAK(validate, 200000, "filters, topics and strings of separators, wildcards and damaged UTF-8; non-trivial: not a valid topic");

// --- ACL
struct Rule { std::string filter; int def = 0; bool has_def = false; std::vector<std::pair<std::string, int>> users; };
// A requested filter is covered by a rule: # only by #, and + on either side fits any level except below $ rules
static bool acl_match(const std::string &rule, const std::string &req) {
	auto a = t_levels(rule), b = t_levels(req);
	for (size_t i = 0;; i++) {
		if (i == a.size() && i == b.size()) return true;
		if (i >= a.size() || i >= b.size()) return false;
		if (a[i] == "#") return true;
		if (b[i] == "#") return false;
		if (a[i] == "+" || b[i] == "+") { if (!a[i].empty() && a[i][0] == '$') return false; }
		else if (a[i] != b[i]) return false;
	}
}
static std::string mixcase(Src &s, const std::string &w) { if (s.chance(2, 3)) return w; std::string r; for (char c : w) r += s.flip() ? (char) tolower(c) : c; return r; }
static std::string nl(Src &s) { std::string r = s.pick({"\n", "\r\n", "\n\n", "\n \t\n", "\r"}); if (s.chance(1, 10)) r += s.pick({"# USER x WRITE\n", "  #\n", "#TOPIC\n\n"}); return r; }
static std::string gap(Src &s) { return s.pick({" ", "\t", "  ", " \t "}); }
static std::string ind(Src &s) { return s.pick({"\t", "", " ", " \t"}); }
static const char *ACT[] = {"DENY", "READ", "WRITE"};
static void acl(Src &s) {
	std::vector<std::string> topics; size_t n = 1 + s.len(3); for (size_t i = 0; i < n; i++) topics.push_back(t_topic(s));
	auto clean = [](std::string f) { std::string r; for (unsigned char c : f) if (c > 0x20) r += (char) c; return r; };
	for (auto &t : topics) { t = clean(t); if (t.empty()) t = "a"; }
	static const std::vector<std::string> U = {"atle", "bob", "Bob", "x_1", "at", "atlee"};
	std::vector<Rule> rules; n = s.len(6); std::string text = s.chance(1, 5) ? nl(s) : "";
	for (size_t i = 0; i < n; i++) {
		Rule r; do r.filter = clean(t_filter(s, s.pick(topics))); while (r.filter.empty() || !t_filter_ok(r.filter));
		text += ind(s) + mixcase(s, "TOPIC") + gap(s) + r.filter + nl(s); size_t m = s.len(4); size_t dpos = s.u(m + 1);
		for (size_t k = 0; k <= m; k++) {
			if (k == dpos) { r.has_def = true; r.def = (int) s.u(2); text += ind(s) + mixcase(s, "DEFAULT") + gap(s) + mixcase(s, ACT[r.def]) + s.pick({"", " ", "\t"}) + nl(s); }
			if (k < m) { std::string u = s.pick(U); int a = (int) s.u(2); r.users.push_back({u, a}); text += ind(s) + mixcase(s, "USER") + gap(s) + u + gap(s) + mixcase(s, ACT[a]) + s.pick({"", " "}) + nl(s); }
		}
		rules.push_back(r);
	}
	// Damage which must make the whole file be refused
	bool bad = s.chance(1, 5);
	if (bad) { static const std::vector<std::string> B = {"USER bob\n", "USER\n", "DEFAULT\n", "DEFAULT maybe\n", "DEFAULT READ WRITE\n", "USER bob READ x\n", "TOPIC\n", "TOPIC a/#/b\n", "TOPIC a+\n", "FOO\n", "USER b.b READ\n", "DEFAULTREAD\n", "USER bob  \nREAD\n", "TOPIC \nx\n"};
		std::string b = s.pick(B); text += "\n" + b; if (rules.empty() && b[0] != 'T' && b[0] != 'F') label("outside a topic"); }
	else if (!text.empty() && s.chance(1, 8)) { while (!text.empty() && strchr(" \t\r\n", text.back())) text.pop_back(); }
	desc("%s ", show(text, 500).c_str());
	clean_tmpdir(); std::string fn = std::string(tmpdir()) + "/acl"; FILE *f = fopen(fn.c_str(), "w"); CHECK(f && fwrite(text.data(), 1, text.size(), f) == text.size(), "write"); fclose(f);
	struct rrr_mqtt_acl c = {}; int ret = rrr_mqtt_acl_entry_collection_populate_from_file(&c, fn.c_str());
	label(ret ? "refused" : "loaded");
	CHECK(!!ret == bad, "loading returned %d, want %s", ret, bad ? "an error" : "success");
	if (ret) { CHECK(c.node_count == 0, "rules of a damaged file are kept"); return; }
	for (int k = 0; k < 6; k++) {
		std::string t = s.pick(topics), user = s.chance(1, 4) ? "" : s.pick(U); bool sub = s.flip(), rw = !sub;
		if (s.chance(1, 5)) t = clean(t_topic(s)); if (t.empty()) t = "a";
		if (sub && s.flip()) { std::string fl; do fl = clean(t_filter(s, t)); while (fl.empty() || !t_filter_ok(fl)); t = fl; }
		struct rrr_mqtt_topic_token *tok = NULL; CHECK(rrr_mqtt_topic_tokenize(&tok, t.c_str()) == 0, "tokenize");
		int level = 0, hits = 0;
		for (auto &r : rules) if (sub ? acl_match(r.filter, t) : t_match(r.filter, t)) { hits++; level = r.def; for (auto &u : r.users) if (!user.empty() && u.first == user) level = u.second; }
		bool want = rw ? level == 2 : level >= 1; desc("| %s %s by '%s' -> %d ", sub ? "subscribe" : "publish", show(t).c_str(), user.c_str(), want);
		int got = rrr_mqtt_acl_check_access(&c, tok, rw ? RRR_MQTT_ACL_ACTION_RW : RRR_MQTT_ACL_ACTION_RO, user.empty() && s.flip() ? NULL : user.c_str(), sub ? rrr_mqtt_topic_match_tokens_recursively_acl : rrr_mqtt_topic_match_tokens_recursively);
		rrr_mqtt_topic_token_destroy(tok);
		CHECK(got == (want ? RRR_MQTT_ACL_RESULT_ALLOW : RRR_MQTT_ACL_RESULT_DENY), "access %d, want %d", got, !want ? 2 : 0);
		if (hits) nontrivial(); label_if(want, "allowed"); label_if(!want && hits, "denied by rule");
	}
	rrr_mqtt_acl_entry_collection_clear(&c);
	CHECK(rrr_mqtt_acl_entry_collection_push_allow_all(&c) == 0, "allow all");
	struct rrr_mqtt_topic_token *tok = NULL; rrr_mqtt_topic_tokenize(&tok, "x/y"); CHECK(rrr_mqtt_acl_check_access(&c, tok, RRR_MQTT_ACL_ACTION_RW, "bob", rrr_mqtt_topic_match_tokens_recursively) == RRR_MQTT_ACL_RESULT_ALLOW, "allow all"); rrr_mqtt_topic_token_destroy(tok);
	rrr_mqtt_acl_entry_collection_clear(&c);
}
VP_TARGET_NOLEAK(acl, 40000, "files of up to 6 topic blocks with defaults and users, or with one damaged line, and six requests each; non-trivial: a rule matches a request");

static void init() { vp_lib_init(); }
VP_MAIN(init)
