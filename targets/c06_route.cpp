// C06: route and method definitions decide as documented
#include "model_topic.hpp"
extern "C" {
#include "lib/array.h"
#include "lib/discern_stack.h"
#include "lib/discern_stack_helper.h"
#include "lib/parse.h"
#include "lib/messages/msg_msg.h"
}
VP_LOG_PREFIX
using namespace vp;

struct Tok { std::string op, val; };              // op: TRUE FALSE T H D AND OR NOT APPLY POP BAIL, or anything else (invalid)
struct Msg { std::string topic; bool array; std::vector<std::string> tags; std::vector<int> kinds; };
typedef std::vector<std::pair<bool, std::string>> Applied;

// Types on the stack after each token; returns the number of tokens used, or 0 if the definition is not valid
static size_t m_parse(const std::vector<Tok> &t) {
	std::string st; // b or d
	for (size_t i = 0; i < t.size(); i++) {
		const std::string &o = t[i].op; size_t n = st.size();
		if (o == "TRUE" || o == "FALSE" || o == "T" || o == "H") st += 'b';
		else if (o == "D" || o == "I") st += 'd';
		else if (o == "AND" || o == "OR") { if (n < 2 || st[n - 1] != 'b' || st[n - 2] != 'b') return 0; st.pop_back(); }
		else if (o == "NOT") { if (n < 1 || st[n - 1] != 'b') return 0; }
		else if (o == "APPLY") { if (n < 2 || st[n - 1] != 'd' || st[n - 2] != 'b') return 0; st.pop_back(); }
		else if (o == "POP") { if (n < 1) return 0; st.pop_back(); }
		else if (o == "BAIL") { if (n < 1 || st[n - 1] != 'b') return 0; st.pop_back(); }
		else return 0;
		if (st.size() >= 64) return 0;
		if (st.empty()) return i + 1;
	}
	return 0;
}
// Returns true on BAIL
static bool m_run(const std::vector<Tok> &t, size_t n, const Msg &m, Applied &out) {
	std::vector<std::pair<bool, std::string>> st;
	for (size_t i = 0; i < n; i++) {
		const std::string &o = t[i].op; auto top = [&](size_t k) -> auto & { return st[st.size() - k]; };
		if (o == "TRUE") st.push_back({true, ""});
		else if (o == "FALSE") st.push_back({false, ""});
		else if (o == "T") st.push_back({!m.topic.empty() && t_match(t[i].val, m.topic), ""});
		else if (o == "H") st.push_back({m.array && std::find(m.tags.begin(), m.tags.end(), t[i].val) != m.tags.end(), ""});
		else if (o == "D" || o == "I") st.push_back({false, t[i].val});
		else if (o == "AND") { bool v = top(1).first && top(2).first; st.pop_back(); top(1).first = v; }
		else if (o == "OR") { bool v = top(1).first || top(2).first; st.pop_back(); top(1).first = v; }
		else if (o == "NOT") top(1).first = !top(1).first;
		else if (o == "APPLY") { out.push_back({top(2).first, top(1).second}); st.pop_back(); }
		else if (o == "POP") st.pop_back();
		else if (o == "BAIL") { if (top(1).first) return true; st.pop_back(); }
	}
	return false;
}
static std::string ctl(Src &s) { std::string r = s.pick({"\n", "\t", "\r\n", "\r", "\n\n"}); return r + s.chars(s.len(3), " \n\t"); }
static std::string sp(Src &s) { return s.chance(3, 4) ? ctl(s) : std::string(1 + s.u(2), ' '); }
static std::string render(Src &s, const std::vector<Tok> &v) {
	std::string r = s.chars(s.len(2), "\n\t");
	for (auto &t : v) {
		if (s.chance(1, 12)) r += "# " + s.chars(s.len(10), "ab TRUE{}<>#") + s.pick({"\n", "\r", "\n\n "}) ;
		r += t.op;
		if (!t.val.empty() || t.op == "T" || t.op == "H" || t.op == "D") r += s.pick({" ", "  ", "\t", "\n ", " \r\n "}) + t.val + (t.op == "T" ? ctl(s) : sp(s));
		else if (t.op == "TRUE" || t.op == "FALSE") r += sp(s);
		else r += s.chance(1, 15) ? "" : sp(s);
	}
	return r;
}
static const std::vector<std::string> TAGS = {"a", "b", "ab", "aab", "abb", "ba", "a1", "A", "x_1", "axxb"};
static Msg gen_msg(Src &s) {
	Msg m; m.topic = s.chance(1, 10) ? "" : t_topic(s); m.array = s.chance(3, 4);
	if (m.array) { size_t n = s.len(5); for (size_t i = 0; i < n; i++) { m.kinds.push_back((int) s.u(4)); m.tags.push_back(s.chance(1, 6) ? "" : s.chance(1, 10) ? gen_utf8(s, 3) : s.pick(TAGS)); } }
	return m;
}
static Tok value(Src &s, const std::string &op, const Msg &m) {
	if (op == "T") return {op, t_filter(s, m.topic.empty() ? "a/b" : m.topic)};
	if (op == "H") return {op, s.chance(1, 30) ? s.word(1, 80, "ab_9Z") : s.pick(TAGS)};
	if (op == "D") return {op, s.word(1, s.chance(1, 20) ? 80 : 3, "abAB_1-")};
	return {op, ""};
}
// Invisible differences: leading white space of a filter is skipped, and control characters end it
static bool tok_ok(const Tok &t) {
	if (t.op == "T") { if (t.val.empty() || t.val[0] == ' ') return false; for (unsigned char c : t.val) if (c <= 0x1f) return false; }
	return true;
}
static std::vector<Tok> gen_def(Src &s, const Msg &m) {
	std::vector<Tok> v; std::string st; size_t n = 1 + (s.chance(1, 25) ? s.n(150) : s.len(20)); bool deep = s.chance(1, 12);
	while (v.size() < 200) {
		std::vector<std::string> c; size_t k = st.size(); bool b1 = k && st[k - 1] == 'b', b2 = k > 1 && st[k - 2] == 'b';
		bool end = v.size() >= n;
		if (!end || !k) for (const char *o : {"T", "H", "TRUE", "FALSE", "T", "H"}) c.push_back(o);
		if (!end && b1) { c.push_back("D"); c.push_back("D"); c.push_back("NOT"); }
		if (!end && !k) c.push_back("D");
		if (b1 && b2) { c.push_back("AND"); c.push_back("OR"); }
		if (b2 && k && st[k - 1] == 'd') { c.clear(); c.push_back("APPLY"); if (s.chance(1, 10)) c.push_back("POP"); }
		else if (k) { if (end || k > 1 || s.chance(1, 3)) { c.push_back("POP"); if (b1) c.push_back("BAIL"); } }
		if (deep && !end && k < 62) { c = {"TRUE", "T", "H", "FALSE"}; }
		Tok t; do t = value(s, s.pick(c), m); while (!tok_ok(t));
		v.push_back(t);
		if (m_parse(v) == v.size()) break;
		// recompute the stack
		st.clear(); for (auto &x : v) { const std::string &o = x.op;
			if (o == "TRUE" || o == "FALSE" || o == "T" || o == "H") st += 'b'; else if (o == "D") st += 'd'; else if (o != "NOT") st.pop_back(); }
	}
	return v;
}
static struct rrr_msg_msg *make(Src &s, const Msg &m) {
	struct rrr_msg_msg *r = NULL; std::string data = s.chance(1, 2) ? s.pick({"$", "/", "#", "a", "b/"}) : s.bytes(s.len(8));
	if (!m.array) { CHECK(rrr_msg_msg_new_with_data(&r, MSG_TYPE_MSG, MSG_CLASS_DATA, 1, m.topic.data(), (rrr_u16) m.topic.size(), data.data(), (rrr_u32) data.size()) == 0, "new"); return r; }
	struct rrr_array a = {}; for (size_t i = 0; i < m.tags.size(); i++) {
		const char *t = m.tags[i].empty() ? NULL : m.tags[i].c_str();
		switch (m.kinds[i]) {
			case 0: CHECK(rrr_array_push_value_u64_with_tag(&a, t, 1) == 0, "push"); break;
			case 1: CHECK(rrr_array_push_value_vain_with_tag(&a, t) == 0, "push"); break;
			case 2: CHECK(rrr_array_push_value_str_with_tag(&a, t, i % 2 ? "" : "value") == 0, "push"); break;
			default: CHECK(rrr_array_push_value_i64_with_tag(&a, t, 0) == 0, "push"); break;
		}
	}
	CHECK(rrr_array_new_message_from_array(&r, &a, 1, m.topic.data(), (rrr_u16) m.topic.size()) == 0, "new message"); rrr_array_clear(&a); return r;
}
static int ap_true(const char *d, void *arg) { ((Applied *) arg)->push_back({true, d}); return 0; }
static int ap_false(const char *d, void *arg) { ((Applied *) arg)->push_back({false, d}); return 0; }
static int dest_cb(const char *n, const char *d, void *arg) { ((std::vector<std::string> *) arg)->push_back(std::string(n) + ":" + d); return 0; }
static void name_cb(const char *n, void *arg) { ((std::vector<std::string> *) arg)->push_back(n); }
static std::string str(const Applied &a) { std::string r; for (auto &x : a) r += (x.first ? "+" : "-") + x.second + " "; return r; }
static std::string str(const std::vector<std::string> &a) { std::string r; for (auto &x : a) r += x + " "; return r; }

static void decide(Src &s) {
	Msg m = gen_msg(s); size_t nd = 1 + s.weighted({4, 2, 1});
	struct rrr_discern_stack_collection col = {}, copy = {}; std::vector<std::vector<Tok>> defs; std::vector<std::string> dests, names; bool bail = false; Applied want;
	desc("topic %s tags [%s]%s ", show(m.topic).c_str(), str(m.tags).c_str(), m.array ? "" : " not array");
	for (size_t i = 0; i < nd; i++) {
		auto v = gen_def(s, m); size_t used = m_parse(v); if (!used) { rrr_discern_stack_collection_clear(&col); rrr_discern_stack_collection_clear(&copy); discard(); }
		std::string text = render(s, v), tail = s.chance(1, 3) ? s.pick({"POP", "garbage", " \n<X>", "TRUE POP"}) : "", name = "n" + std::to_string(s.u(3)) + std::to_string(i);
		// What follows the last operator is not part of the definition
		desc("| %s ", show(text, 400).c_str());
		std::string in = text + tail; std::vector<char> buf(in.begin(), in.end());
		struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, buf.data(), (rrr_length) buf.size()); enum rrr_discern_stack_fault f = RRR_DISCERN_STACK_FAULT_CRITICAL;
		int ret = rrr_discern_stack_interpret(&col, &f, &pos, name.c_str());
		CHECK(ret == 0 && f == RRR_DISCERN_STACK_FAULT_OK, "definition rejected with %d fault %d", ret, f);
		size_t last = text.find_last_not_of(" \n\t\r");
		CHECK(pos.pos == last + 1, "parsing stopped at %u, the definition ends at %zu", pos.pos, last + 1);
		if (!bail) bail = m_run(v, used, m, want);
		for (auto &t : v) if (t.op == "D") dests.push_back(name + ":" + t.val);
		names.push_back(name); defs.push_back(v);
		const struct rrr_discern_stack *d = rrr_discern_stack_collection_get(&col, name.c_str());
		CHECK(d, "definition %s not found", name.c_str()); CHECK(rrr_discern_stack_collection_add_cloned(&copy, d) == 0, "clone");
	}
	desc("want %s%s", str(want).c_str(), bail ? "bail" : ""); label(bail ? "bail" : "to the end"); label_if(!want.empty(), "applies"); label_if(nd > 1, "several definitions");
	if (want.size() && std::any_of(want.begin(), want.end(), [](auto &x) { return x.first; })) nontrivial();
	std::vector<std::string> g; CHECK(rrr_discern_stack_collection_iterate_destination_names(&col, dest_cb, &g) == 0 && g == dests, "destinations %s, want %s", str(g).c_str(), str(dests).c_str());
	g.clear(); rrr_discern_stack_collection_iterate_names(&col, name_cb, &g); CHECK(g == names, "names %s", str(g).c_str());
	if (s.flip()) { rrr_discern_stack_collection_clear(&col); std::swap(col, copy); }
	struct rrr_msg_msg *msg = make(s, m); struct rrr_msg_msg *exact = (struct rrr_msg_msg *) malloc(MSG_TOTAL_SIZE(msg)); memcpy(exact, msg, MSG_TOTAL_SIZE(msg)); rrr_free(msg);
	bool no_false = s.chance(1, 4);
	for (int round = 0; round < 2; round++) {
		Applied got; struct rrr_discern_stack_helper_callback_data hd = {exact, 0};
		struct rrr_discern_stack_callbacks cb = {rrr_discern_stack_helper_topic_filter_resolve_cb, rrr_discern_stack_helper_array_tag_resolve_cb, &hd, no_false ? NULL : ap_false, ap_true, &got};
		enum rrr_discern_stack_fault f = RRR_DISCERN_STACK_FAULT_CRITICAL; int ret = rrr_discern_stack_collection_execute(&f, &col, &cb);
		Applied w; for (auto &x : want) if (x.first || !no_false) w.push_back(x);
		CHECK(ret == (bail ? RRR_DISCERN_STACK_BAIL : 0) && f == RRR_DISCERN_STACK_FAULT_OK, "execute returned %d fault %d", ret, f);
		CHECK(got == w, "applied %s, want %s", str(got).c_str(), str(w).c_str());
	}
	free(exact); rrr_discern_stack_collection_clear(&col); rrr_discern_stack_collection_clear(&copy);
}
VP_TARGET_NOLEAK(decide, 200000, "one to three definitions of up to 150 statements (filters derived from the message's topic, tags which differ in the middle only), run on a message with a topic and an array or not, original or copy; non-trivial: applies to a destination");

// One statement removed, inserted or changed: accepted exactly if the rules say so
static void invalid(Src &s) {
	Msg m = gen_msg(s); auto v = gen_def(s, m);
	static const std::vector<std::string> OPS = {"TRUE", "FALSE", "T", "H", "D", "AND", "OR", "NOT", "APPLY", "POP", "BAIL", "XOR", "true", "PUSH", "M", "T#"};
	for (size_t k = 1 + s.len(2); k--;) { if (v.empty()) break;
		size_t i = s.u(v.size() - 1); Tok t; do t = value(s, s.pick(OPS), m); while (!tok_ok(t));
		switch (s.u(3)) { case 0: v.erase(v.begin() + (long) i); break; case 1: v.insert(v.begin() + (long) i, t); break; case 2: v[i] = t; break; default: v.resize(i); } }
	int badval = s.chance(1, 3) ? 1 + (int) s.u(5) : 0; size_t bi = 0;
	if (badval) { std::vector<size_t> c; for (size_t i = 0; i < v.size(); i++) if (v[i].op == "T" || v[i].op == "H" || v[i].op == "D") c.push_back(i);
		if (c.empty()) badval = 0;
		else { bi = s.pick(c); std::string bad = v[bi].op == "T" ? s.pick({"a+", "#/a", "+a/b", "a#", "##", "\xff" "a", "a/b\xc3", "++"}) : v[bi].op == "H" ? s.pick({"a-b", "a.b", "-", "\xc3\xa6", "a\"b"}) : s.pick({"a.b", ".", "a/b", "<x>"}); v[bi].val = bad; } }
	size_t used = m_parse(v); if (badval && (used == 0 || bi < used)) used = 0;
	std::vector<Tok> w(v.begin(), v.begin() + (long) (used ? used : v.size()));
	std::string text = render(s, used ? w : v); size_t full = text.size(); if (used && s.chance(1, 3)) text += "XYZ"; bool cut = s.chance(1, 4); if (cut) text = text.substr(0, s.u(text.size()));
	desc("%s", show(text, 500).c_str());
	std::vector<char> buf(text.begin(), text.end()); struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, buf.data(), (rrr_length) buf.size());
	enum rrr_discern_stack_fault f = RRR_DISCERN_STACK_FAULT_OK; struct rrr_discern_stack_collection col = {};
	int ret = rrr_discern_stack_interpret(&col, &f, &pos, "x");
	label(ret ? "rejected" : "accepted"); if (ret) nontrivial();
	// A definition cut off in its last statement is not complete; where it is cut later it is complete
	auto statements = [&]() { for (size_t i = 0; i < text.size(); i++) { if (strchr(" \r\n\t", text[i])) continue; if (text[i] != '#') return true; while (i < text.size() && text[i] != '\r' && text[i] != '\n') i++; } return false; };
	if (!statements()) { label("no statements"); rrr_discern_stack_collection_clear(&col); return; }   // harmless, both happen
	if (cut && text.size() < full) { size_t last = used ? (full ? text.find_last_not_of(" \n\t\r") : 0) : 0; (void) last; if (!ret && !used) FAIL("part of an invalid definition accepted"); }
	else CHECK(!!ret == !used, "%s definition: returned %d", used ? "valid" : "invalid", ret);
	CHECK(!ret == (f == RRR_DISCERN_STACK_FAULT_OK), "returned %d with fault %d", ret, f);
	if (!ret) {
		struct rrr_msg_msg *msg = make(s, m); Applied got; struct rrr_discern_stack_helper_callback_data hd = {msg, 0};
		struct rrr_discern_stack_callbacks cb = {rrr_discern_stack_helper_topic_filter_resolve_cb, rrr_discern_stack_helper_array_tag_resolve_cb, &hd, ap_false, ap_true, &got};
		rrr_discern_stack_collection_execute(&f, &col, &cb); rrr_free(msg);
	}
	rrr_discern_stack_collection_clear(&col);
}
VP_TARGET_NOLEAK(invalid, 120000, "definitions with one to three statements removed, inserted or changed, invalid values, or cut off; non-trivial: rejected");

// Topic matching: both implementations agree with the model for exact-size buffers
static void init() { vp_lib_init(); }
VP_MAIN(init)
