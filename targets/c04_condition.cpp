// C04: conditions evaluate like the same expression in C
#include "model_cond.hpp"
extern "C" {
#include "lib/condition.h"
#include "lib/parse.h"
#include "lib/helpers/string_builder.h"
}
VP_LOG_PREFIX
using namespace vp;

typedef std::map<std::string, std::pair<uint64_t, bool>> Tags;
static int name_cb(RRR_CONDITION_NAME_EVALUATE_CALLBACK_ARGS) {
	Tags *t = (Tags *) arg; auto i = t->find(name); if (i == t->end()) return RRR_CONDITION_SOFT_ERROR;
	*result = i->second.first; *is_signed = i->second.second; return 0;
}
static CVal model_tag(const Tags &t, const std::string &n) { auto i = t.find(n); if (i == t.end()) return {0, false, true, false}; return {i->second.first, i->second.second, false, false}; }

static void evaluate(Src &s) {
	Tags tags; std::vector<std::string> names; size_t n = s.len(4);
	for (size_t i = 0; i < n; i++) { std::string t = s.word(1, s.chance(1, 8) ? 61 : 4, "abAB_1"); bool sg = s.flip(); uint64_t v = s.chance(1, 2) ? s.n(300) : s.u64(); tags[t] = {v, sg}; names.push_back(t); }
	if (s.chance(1, 15)) names.push_back("missing");
	CX x = c_gen(s, names, (int) s.u(5)); std::string t = "(" + c_sp(s) + c_text(s, x) + c_sp(s) + ")", tail = s.chance(1, 4) ? s.chars(s.len(5), " );,a1+") : "";
	desc("%s", show(t).c_str()); for (auto &k : tags) desc(" %s=%lld%s", k.first.c_str(), (long long) k.second.first, k.second.second ? "s" : "");
	CVal want = c_eval(x, [&](const std::string &q) { return model_tag(tags, q); });
	std::string in = t + tail; std::vector<char> buf(in.begin(), in.end());
	struct rrr_condition c = {}, d = {}; struct rrr_parse_pos pos; rrr_parse_pos_init(&pos, buf.data(), (rrr_length) buf.size());
	int ret = rrr_condition_interpret(&c, &pos);
	CHECK(ret == 0, "expression rejected with %d", ret);
	CHECK(pos.pos == t.size(), "parsing stopped at %u, the expression is %zu bytes", pos.pos, t.size());
	CHECK(rrr_condition_clone(&d, &c) == 0, "clone");
	uint64_t r1 = 0, r2 = 0; int e1 = rrr_condition_evaluate(&r1, &c, name_cb, &tags), e2 = rrr_condition_evaluate(&r2, &d, name_cb, &tags);
	if (x.k.size() == 2) nontrivial();
	if (!want.any) {
		label(want.err ? "evaluation error" : "evaluated");
		CHECK(!!e1 == want.err && !!e2 == want.err, "evaluation returned %d, clone %d, want %s", e1, e2, want.err ? "an error" : "success");
		if (!want.err) CHECK(r1 == want.v && r2 == want.v, "result %llx, clone %llx, want %llx", (unsigned long long) r1, (unsigned long long) r2, (unsigned long long) want.v);
	}
	struct rrr_string_builder sb = {}; rrr_condition_dump(&sb, &c); rrr_string_builder_clear(&sb);
	rrr_condition_clear(&c); rrr_condition_clear(&d);
}
VP_TARGET_NOLEAK(evaluate, 60000, "expressions of up to 32 values with all operators, random white space, redundant parentheses, signed and unsigned tags; non-trivial: a binary operator at the top");

// Expressions with missing or extra tokens, and token soup
static void malformed(Src &s) {
	static const std::vector<std::string> T = {"(", ")", "<=", ">=", "<<", ">>", "<", ">", "==", "!=", "&&", "||", "AND", "OR", "&", "^", "|", "+", "-", "*", "/", "~", "1", "23", "0x1f", "-5", "{a}", "{b_1}", "{", "}", "0x", " ", "\n", "x"};
	std::string t = s.chance(3, 4) ? "(" : ""; size_t n = s.len(14);
	for (size_t i = 0; i < n; i++) { t += s.pick(T); if (s.flip()) t += " "; }
	if (s.chance(3, 4)) t += ")";
	desc("%s", show(t).c_str());
	int depth = 0, maxd = 0; bool closed = false; for (char ch : t) { if (closed) break; if (ch == '(') depth++; if (ch == ')') { depth--; if (!depth) closed = true; } maxd = std::max(maxd, depth); }
	std::vector<char> buf(t.begin(), t.end()); struct rrr_condition c = {};
	int ret = rrr_condition_interpret_raw(&c, buf.data(), (rrr_length) buf.size());
		label(ret ? "rejected" : "accepted");
	if (!closed && maxd) CHECK(ret, "no closing parenthesis and accepted");
	if (!ret) {
		nontrivial(); Tags tags; tags["a"] = {s.u64(), s.flip()}; tags["b_1"] = {s.n(100), false};
		uint64_t r; rrr_condition_evaluate(&r, &c, name_cb, &tags);
	}
	rrr_condition_clear(&c);
}
VP_TARGET_NOLEAK(malformed, 40000, "sequences of tokens, mostly not expressions: rejected or safe to evaluate; non-trivial: accepted");

// Values before their operators, sorted by priority (RPN as documented)
static void rpn(Src &s) {
	size_t n = 2 + s.len(4); std::vector<CX> v; std::vector<int> prio; Tags none; std::string t = "(";
	for (size_t i = 0; i < n; i++) { CX x; do x = c_value(s, {}); while (x.text[0] == 0x2d); v.push_back(x); t += x.text + " "; }
	for (size_t i = 0; i + 1 < n; i++) prio.push_back((int) s.u(C_PRIO.size() - 1));
	std::sort(prio.begin(), prio.end()); std::vector<CX> st = v;
	for (int p : prio) { CX x; x.op = s.pick(C_PRIO[(size_t) p]); if (x.op == "-") x.op = "+"; CX b = st.back(); st.pop_back(); CX a = st.back(); st.pop_back(); x.k = {a, b}; st.push_back(x); t += x.op + " "; }
	t += ")"; desc("%s", t.c_str()); nontrivial();
	CVal want = c_eval(st[0], [&](const std::string &) { return CVal{0, false, true, false}; });
	struct rrr_condition c = {}; CHECK(rrr_condition_interpret_raw(&c, t.data(), (rrr_length) t.size()) == 0, "rejected");
	uint64_t r = 0; int e = rrr_condition_evaluate(&r, &c, name_cb, &none);
	if (!want.any) { CHECK(!!e == want.err, "returned %d", e); if (!want.err) CHECK(r == want.v, "result %llx, want %llx", (unsigned long long) r, (unsigned long long) want.v); }
	rrr_condition_clear(&c);
}
VP_TARGET_NOLEAK(rpn, 10000, "values followed by operators in order of priority; every case counts");

static void init() { vp_lib_init(); }
VP_MAIN(init)
