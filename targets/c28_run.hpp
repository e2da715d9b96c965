// Running a module, for C28 and C33
#pragma once
#include "common.hpp"
#include <map>
#include <deque>
#include <memory>
#include <functional>
extern "C" {
#include "lib/settings.h"
#include "lib/instance_config.h"
#include "c28_glue.h"
}
#include "c27_msg.hpp"
VP_LOG_PREFIX
struct Out { M m; std::string to; bool ts = true; };
static std::string str(const Out &o) { return str(o.m) + "->" + o.to; }
static std::vector<Out> g_out, g_want; static std::function<void()> g_case; static uint64_t t0;
extern "C" void c28_case(void) { auto c = g_case; g_case = nullptr; CHECK((bool) c, "started twice"); c(); }
static bool g_cut;	// a malformed message is under way: whether it is passed on is not decided
extern "C" int c28_written(struct rrr_msg_holder *e, const char *to) { if (g_cut) return 0; g_out.push_back({read(e), to ? to : "all"}); return 0; }
static bool run(int module, const std::string &conf, std::function<void()> c) { std::string t = "[x]\n" + conf; struct rrr_instance_config_collection *col = NULL; CHECK(rrr_instance_config_parse_string(&col, t.data(), (rrr_length) t.size()) == 0, "configuration %s", conf.c_str()); g_case = c; g_out.clear(); g_want.clear(); c28_run(module, RRR_LL_FIRST(col)); bool started = !g_case; g_case = nullptr; rrr_instance_config_collection_destroy(col); return started; }
static void compare(const char *what) {
	for (size_t i = 0; i < g_out.size() && i < g_want.size(); i++) CHECK(same(g_out[i].m, g_want[i].m, g_want[i].ts) && g_out[i].to == g_want[i].to, "%s: %s was written, expected %s", what, str(g_out[i]).c_str(), str(g_want[i]).c_str());
	CHECK(g_out.size() <= g_want.size(), "%s: %s was written, expected nothing", what, str(g_out[g_want.size()]).c_str());
	CHECK(g_out.size() >= g_want.size(), "%s: %s was not written", what, str(g_want[g_out.size()]).c_str());
	g_out.clear(); g_want.clear();
}
