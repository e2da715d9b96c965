// Condition expressions: generator, renderer and reference evaluation
#pragma once
#include "common.hpp"

struct CVal { uint64_t v; bool sgn; bool err; bool any; };   // any: not defined by C, everything is accepted
struct CX {
	std::string op;        // "" for values, "~" unary
	std::vector<CX> k;
	std::string text, tag; // of a value
	uint64_t v = 0; bool sgn = false;
};
static const std::vector<std::vector<std::string>> C_PRIO = {{"*", "/"}, {"+", "-"}, {"<<", ">>"}, {"<=", ">=", "<", ">"}, {"==", "!="}, {"&"}, {"^"}, {"|"}, {"&&"}, {"||"}};
static inline int c_prio(const CX &x) {
	if (x.k.empty()) return -2;
	if (x.op == "~") return -1;
	for (int i = 0; i < (int) C_PRIO.size(); i++) for (auto &o : C_PRIO[(size_t) i]) if (o == x.op) return i;
	FAIL("operator %s", x.op.c_str());
}
typedef std::function<CVal(const std::string &)> CTags;

static inline CVal c_eval(const CX &x, const CTags &tags) {
	if (x.k.empty()) return x.tag.empty() ? CVal{x.v, x.sgn, false, false} : tags(x.tag);
	CVal b = c_eval(x.k.back(), tags), a = {0, false, false, false}; if (x.k.size() == 2) { a = b; a = c_eval(x.k[0], tags); }
	if (a.any || b.any) return {0, false, false, true};
	if (a.err || b.err) return {0, false, true, false};
	bool sg = b.sgn || (x.k.size() == 2 && a.sgn);
	if (sg && ((!a.sgn && a.v > INT64_MAX) || (!b.sgn && b.v > INT64_MAX))) return {0, true, true, false};
	int64_t sa = (int64_t) a.v, sb = (int64_t) b.v; uint64_t r; const std::string &o = x.op;
	if (o == "~") r = ~b.v;
	else if (o == "*") r = a.v * b.v;
	else if (o == "+") r = a.v + b.v;
	else if (o == "-") r = a.v - b.v;
	else if (o == "/") { if (b.v == 0 || (sg && sa == INT64_MIN && sb == -1)) return {0, sg, true, false}; r = sg ? (uint64_t) (sa / sb) : a.v / b.v; }
	else if (o == "<<" || o == ">>") { if (b.v > 63) return {0, sg, false, true}; r = o == "<<" ? a.v << b.v : sg ? (uint64_t) (sa >> sb) : a.v >> b.v; }
	else if (o == "<=") r = sg ? sa <= sb : a.v <= b.v;
	else if (o == ">=") r = sg ? sa >= sb : a.v >= b.v;
	else if (o == "<") r = sg ? sa < sb : a.v < b.v;
	else if (o == ">") r = sg ? sa > sb : a.v > b.v;
	else if (o == "==") r = a.v == b.v;
	else if (o == "!=") r = a.v != b.v;
	else if (o == "&") r = a.v & b.v;
	else if (o == "^") r = a.v ^ b.v;
	else if (o == "|") r = a.v | b.v;
	else if (o == "&&") r = a.v && b.v;
	else if (o == "||") r = a.v || b.v;
	else FAIL("operator %s", o.c_str());
	return {r, sg, false, false};
}
static inline CX c_value(vp::Src &s, const std::vector<std::string> &tags) {
	CX x; char b[40];
	if (!tags.empty() && s.chance(2, 5)) { x.tag = s.pick(tags); x.text = "{" + x.tag + "}"; return x; }
	switch (s.u(3)) {
		case 0: case 1: x.v = s.chance(1, 8) ? s.u64() : s.n(300); snprintf(b, 40, "%llu", (unsigned long long) x.v); break;
		case 2: x.v = s.chance(1, 8) ? s.u64() : s.n(300); snprintf(b, 40, s.flip() ? "0x%llx" : "0X%llX", (unsigned long long) x.v); break;
		default: { int64_t i = s.chance(1, 8) ? s.i64() : (int64_t) s.n(300); if (i > 0) i = -i; x.v = (uint64_t) i; x.sgn = true; if (i == 0) { x.sgn = true; strcpy(b, "-0"); } else snprintf(b, 40, "%lld", (long long) i); break; }
	}
	x.text = b; return x;
}
static inline CX c_gen(vp::Src &s, const std::vector<std::string> &tags, int depth) {
	if (depth == 0 || s.chance(1, 4)) return c_value(s, tags);
	CX x;
	if (s.chance(1, 8)) { x.op = "~"; x.k.push_back(c_gen(s, tags, depth - 1)); return x; }
	x.op = s.pick(s.pick(C_PRIO)); x.k.push_back(c_gen(s, tags, depth - 1)); x.k.push_back(c_gen(s, tags, depth - 1));
	return x;
}
static inline std::string c_sp(vp::Src &s) { static const char *const w[] = {"", "", " ", "\t", "\n", "  ", "\r\n"}; return w[s.u(6)]; }
static inline std::string c_text(vp::Src &s, const CX &x) {
	if (x.k.empty()) return s.chance(1, 12) ? "(" + c_sp(s) + x.text + ")" : x.text;
	std::string r; int p = c_prio(x);
	auto kid = [&](const CX &k, bool right) {
		std::string t = c_text(s, k); int kp = c_prio(k);
		bool need = right ? kp >= p : kp > p;
		if (x.op == "~") need = kp > p;
		return need || s.chance(1, 10) ? "(" + c_sp(s) + t + c_sp(s) + ")" : t;
	};
	if (x.op == "~") return "~" + c_sp(s) + kid(x.k[0], true);
	std::string o = x.op, l = kid(x.k[0], false), rr = kid(x.k[1], true);
	if (o == "&&" && s.flip()) o = " AND "; else if (o == "||" && s.flip()) o = " OR ";
	return l + c_sp(s) + o + c_sp(s) + rr;
}
