// C33: the averager module
#include "c28_run.hpp"
static const uint64_t S1 = 1000000;
extern "C" int c28_db_open(void) { abort(); } extern "C" void c28_db(void *, int, const char *, uint32_t, const struct rrr_msg_msg *, c28_deliver_t, void *) { abort(); } extern "C" void c28_db_closed(void *) { abort(); }
struct In { uint64_t ts, v, from, to; };
static M any(Src &s, bool &meas, In &in) {
	M m; m.ts = in.ts = c28_now - s.pick({0u, 0u, 1u, 5u, 12u, 30u}) * S1; m.topic = s.pick({"", "t", "t/u"}); meas = s.chance(3, 4);
	auto add = [&](const char *tag, uint64_t n) { V v; v.t = 'h'; v.tag = tag; v.n = n; m.v.push_back(v); };
	if (meas) { in.v = s.flip() ? s.u(20) : s.u64() >> 12; in.from = s.flip() ? m.ts - s.u(3) : s.u64(); in.to = s.flip() ? m.ts + s.u(3) : s.u64(); if (s.chance(1, 5)) add("x", 5); if (s.flip()) { add("measurement", in.v); add("timestamp_from", in.from); add("timestamp_to", in.to); } else { add("timestamp_to", in.to); add("timestamp_from", in.from); add("measurement", in.v); } return m; }
	switch (s.u(2)) { case 0: m.array = false; m.data = s.chars(s.u(4), "xyz"); break; case 1: add(s.pick({"x", "measure", "measurements"}), s.u(9)); break; default: add("timestamp_from", 1); add("timestamp_to", 2); }
	return m;
}
static void averager(Src &s) {
	c28_now = 1700000000ull * S1; std::string conf = "module=averager\n", topic; uint64_t span = 15, iv = 10; bool keep, drop; auto yn = [&](const char *n, bool &b) { b = s.flip(); if (b || s.flip()) conf += std::string("avg_") + n + "=" + (b ? "yes" : "no") + "\n"; };
	if (s.flip()) { span = s.pick({5u, 20u, 60u, 2000000000u}); conf += "avg_timespan=" + std::to_string(span) + "\n"; } if (s.flip()) { iv = 1 + s.u(30); conf += "avg_interval=" + std::to_string(iv) + "\n"; } yn("preserve_points", keep); yn("discard_unknowns", drop); if (s.flip()) { topic = s.pick({"o", "out/put"}); conf += "avg_message_topic=" + topic + "\n"; }
	desc("%s", conf.c_str()); bool some = false;
	CHECK(run(C28_AVERAGER, conf, [&] {
		std::vector<In> in; uint64_t next = c28_now + iv * S1;
		for (size_t k = 3 + s.len(20); k; k--) {
			if (s.chance(2, 3)) {
				std::vector<struct rrr_msg_holder *> h; for (size_t n = 1 + s.len(3); n; n--) {
					In x; bool meas; M m = any(s, meas, x); desc("; %s", str(m).c_str()); bool bad = s.chance(1, 30); struct rrr_msg_holder *e = make(m);
					if (bad && m.array) { struct rrr_msg_msg *msg = (struct rrr_msg_msg *) e->message; desc(" (cut)"); label("malformed array"); msg->msg_size -= 3; e->data_length -= 3; struct rrr_msg_holder *one[1] = {e}; g_cut = true; CHECK(c28_feed(one, 1) == 0, "return"); c28_loop(c28_now); g_cut = false; continue; }
					h.push_back(e); if (meas) { in.push_back(x); if (keep) { M o = m; if (!topic.empty()) o.topic = topic; g_want.push_back({o, "all"}); } } else if (!drop) g_want.push_back({m, "all"});
				}
				CHECK(c28_feed(h.data(), h.size()) == 0, "return"); c28_loop(c28_now); CHECK(!c28_broken(), "the module stops"); compare("message");
			}
			else {
				uint64_t to = c28_now + s.pick({0u, 1u, 5u, 11u, 40u}) * S1; desc("; %d s", (int) ((to - c28_now) / S1));
				for (; next <= to; next += iv * S1) {
					uint64_t n = 0, sum = 0, max = 0, min = UINT64_MAX, from = UINT64_MAX, up = 0; for (auto &x : in) if (span * S1 > next || x.ts >= next - span * S1) { n++; sum += x.v; max = std::max(max, x.v); min = std::min(min, x.v); from = std::min(from, x.from); up = std::max(up, x.to); }
					if (n) { M o; o.topic = topic; o.ts = next; auto add = [&](const char *tag, uint64_t v) { V q; q.t = 'h'; q.tag = tag; q.n = v; o.v.push_back(q); }; add("timestamp_from", from); add("timestamp_to", up); add("average", sum / n); add("max", max); add("min", min); g_want.push_back({o, "all"}); if (n > 1) some = true; }
					c28_loop(next); CHECK(!c28_broken(), "the module stops"); compare("average");
				}
				c28_loop(to); compare("time");
			}
		}
	}), "the module did not start");
	if (some) nontrivial();
}
VP_TARGET(averager, 100000, "an average of several measurements was written");
static void init() { vp_lib_init(); }
VP_MAIN(init)
