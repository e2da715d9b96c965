// Topic matching as the MQTT standard has it, with two documented-by-test deviations of this project: wildcards on every level
// (not only the first) do not match a level starting with $, and "a/#" does not match "a" itself.
#pragma once
#include "common.hpp"
static inline std::vector<std::string> t_levels(const std::string &t) {
	std::vector<std::string> r(1); for (char c : t) { if (c == '/') r.emplace_back(); else r.back() += c; } return r;
}
static inline bool t_match(const std::string &filter, const std::string &topic) {
	auto f = t_levels(filter), t = t_levels(topic); size_t i = 0;
	for (; i < f.size(); i++) {
		if (i >= t.size()) return false;
		bool dollar = !t[i].empty() && t[i][0] == '$';
		if (f[i] == "#") return !dollar;
		if (f[i] == "+") { if (dollar) return false; }
		else if (f[i] != t[i]) return false;
	}
	return i == t.size();
}
// A level of a topic: few names, so that they meet
static inline std::string t_level(vp::Src &s) {
	switch (s.weighted({8, 2, 2, 1, 1})) {
		case 0: return std::string(1, (char) ('a' + s.u(1)));
		case 1: return "";
		case 2: return s.pick({"$", "$SYS", "$a"});
		case 3: return gen_utf8(s, 6).substr(0); 
		default: return s.word(1, 5, "ab c.-_\"\\{}<>$");
	}
}
static inline std::string t_no_special(std::string l) { std::string r; for (char c : l) if (c != '/' && c != '#' && c != '+') r += c; return r; }
static inline std::string t_join(const std::vector<std::string> &v) { std::string r; for (size_t i = 0; i < v.size(); i++) r += (i ? "/" : "") + v[i]; return r; }
// A topic name, never empty
static inline std::string t_topic(vp::Src &s) {
	std::vector<std::string> v; size_t n = 1 + s.len(4);
	for (size_t i = 0; i < n; i++) v.push_back(t_no_special(t_level(s)));
	std::string r = t_join(v); return r.empty() ? "a" : r;
}
// A filter, mostly derived from the topic
static inline std::string t_filter(vp::Src &s, const std::string &topic) {
	std::vector<std::string> v = t_levels(topic);
	if (s.chance(1, 6)) { v.clear(); size_t n = 1 + s.len(4); for (size_t i = 0; i < n; i++) v.push_back(t_no_special(t_level(s))); }
	for (auto &l : v) switch (s.weighted({6, 2, 1})) { case 1: l = "+"; break; case 2: l = t_no_special(t_level(s)); break; default: break; }
	switch (s.weighted({5, 2, 1, 1})) {
		case 1: v.resize(1 + s.u(v.size() - 1)); v.back() = "#"; break;
		case 2: v.push_back(s.pick({"#", "+", "", "a"})); break;
		case 3: if (v.size() > 1) v.pop_back(); break;
		default: break;
	}
	std::string r = t_join(v); return r.empty() ? "+" : r;
}
// The rules for filters in the standard
static inline bool t_filter_ok(const std::string &f) {
	auto v = t_levels(f);
	for (size_t i = 0; i < v.size(); i++) {
		if (v[i].find_first_of("#+") == std::string::npos) continue;
		if (v[i].size() != 1 || (v[i] == "#" && i + 1 != v.size())) return false;
	}
	return true;
}
