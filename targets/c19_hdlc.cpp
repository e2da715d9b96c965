// C19: HDLC frames come out as they were put in, whatever surrounds them
#include "common.hpp"
extern "C" {
#include "lib/hdlc/hdlc.h"
#include "lib/parse.h"
#include "lib/type.h"
#include "lib/array.h"
#include "lib/array_tree.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;

static S gen_data(Src &s) {
	S r; size_t n = s.chance(1, 60) ? 4000 + s.u(200) : s.chance(1, 10) ? 1 + s.len(300) : 1 + s.len(20);
	if (n > 1000 && s.chance(3, 4)) { r = S(n, (char) s.u(255)); if (s.flip()) for (size_t k = s.u(90), i = 0; i < k; i++) r[s.u(n - 1)] = s.pick({(int) 0x7e, 0x7d}); return r; }
	int mode = (int) s.u(2);
	while (r.size() < n) r += mode == 0 ? (char) s.u(255) : mode == 1 ? (char) s.pick({0x7e, 0x7d, 0x5e, 0x5d, 0x20, 0, 0xff}) : (char) (s.chance(1, 5) ? s.pick({0x7e, 0x7d}) : (int) s.u(255));
	return r;
}
static S enc_body(const S &d) { S r; for (char c : d) { if (c == 0x7e || c == 0x7d) { r += (char) 0x7d; r += (char) (c ^ 0x20); } else r += c; } return r; }

// Reference decoder: the frames, and what is left. 0: nothing more, 1: a frame, 2: too long
static int ref_next(const S &w, size_t &pos, S &out) {
	out.clear(); size_t i = w.find((char) 0x7e, pos); if (i == S::npos) { pos = w.size(); return 0; }
	for (i++; i < w.size(); i++) {
		char c = w[i];
		if (c == 0x7e) { if (out.empty()) continue; pos = i + 1; return 1; }
		if (c == 0x7d) { if (++i == w.size()) return 0; c = (char) (w[i] ^ 0x20); }
		if (out.size() == RRR_HDLC_MAX - 1) return 2;
		out += c;
	}
	return 0;
}
// Find the next frame in w from pos with data which becomes available in pieces, in a buffer which moves
static int next(Src &s, const S &w, size_t &pos, S &out, bool pieces) {
	struct rrr_parse_pos pp; struct rrr_hdlc_parse_state st; std::vector<size_t> cuts; if (pieces) cuts = s.cuts(w.size() - pos, 6); for (auto &c : cuts) c += pos; cuts.push_back(w.size());
	static char none; rrr_parse_pos_init(&pp, &none, 0); pp.pos = (rrr_length) pos; memset(&st, 0xa5, sizeof st); rrr_hdlc_parse_state_init(&st, &pp); int ret = RRR_HDLC_INCOMPLETE;
	for (size_t n : cuts) {
		std::unique_ptr<char[]> b(new char[n ? n : 1]); memcpy(b.get(), w.data(), n); pp.data = b.get(); pp.size = (rrr_length) n;
		ret = rrr_hdlc_parse_frame(&st); CHECK(pp.pos <= n, "position %u of %zu", pp.pos, n);
		if (ret != RRR_HDLC_INCOMPLETE) break;
		CHECK(pp.pos == n, "incomplete at %u of %zu", pp.pos, n);
	}
	CHECK(ret == RRR_HDLC_OK || ret == RRR_HDLC_INCOMPLETE || ret == RRR_HDLC_SOFT_ERROR, "return %d", ret);
	pos = pp.pos; out = S(RRR_HDLC_DATA(&st), RRR_HDLC_DATA_SIZE(&st)); CHECK(out.size() < RRR_HDLC_MAX, "too long");
	if (ret == RRR_HDLC_OK) { size_t p0 = pp.pos; CHECK(rrr_hdlc_parse_frame(&st) == (pp.pos < pp.size ? RRR_HDLC_OK : RRR_HDLC_INCOMPLETE) && pp.pos == p0 && S(RRR_HDLC_DATA(&st), RRR_HDLC_DATA_SIZE(&st)) == out, "parsing again after the end"); }
	return ret;
}
static int import(const S &w, size_t pos, S *out, size_t *used) {
	struct rrr_type_value *v = NULL; CHECK(rrr_type_value_new(&v, &rrr_type_definition_hdlc, 0, 0, NULL, 0, NULL, 1, NULL, 0) == 0, "value");
	std::unique_ptr<char[]> b(new char[w.size() - pos + !w.size()]); memcpy(b.get(), w.data() + pos, w.size() - pos); rrr_length n = 77;
	int r = w.size() == pos ? RRR_TYPE_PARSE_INCOMPLETE : rrr_type_definition_hdlc.do_import(v, &n, b.get(), b.get() + w.size() - pos);
	if (r == 0) { *out = S(v->data, v->total_stored_length); *used = n; CHECK(v->element_count == 1 && v->definition == &rrr_type_definition_hdlc && v->import_length == n, "value which was read");
		rrr_length l = 0, wr = 0; int e = rrr_type_definition_hdlc.get_export_length(&l, v); S eb = enc_body(*out);
		CHECK((e == 0) == (eb.size() + 2 <= RRR_HDLC_MAX), "export of %zu bytes returns %d", eb.size() + 2, e);
		if (e == 0) { CHECK(l == eb.size() + 2, "export length"); std::unique_ptr<char[]> t(new char[l]); CHECK(rrr_type_definition_hdlc.do_export(t.get(), &wr, v) == 0 && wr == l && S(t.get(), l) == "~" + eb + "~", "export of the value"); } }
	rrr_type_value_destroy(v); return r;
}
static S noise(Src &s, bool end) { S r; if (s.chance(1, 2)) { r = s.flip() ? s.bytes(s.len(12)) : s.chars(s.len(5), "\x7d\x5e\x20 a\n"); for (auto &c : r) if (c == 0x7e) c = 'x'; } (void) end; return r; }

static void roundtrip(Src &s) {
	size_t n = 1 + s.u(4); std::vector<S> frames; S w; bool shared = false;
	for (size_t i = 0; i < n; i++) {
		S d = gen_data(s), eb = enc_body(d); rrr_length l = 99, wr = 0; std::unique_ptr<char[]> db(new char[d.size()]); memcpy(db.get(), d.data(), d.size());
		int r = rrr_hdlc_get_export_length(&l, db.get(), (rrr_length) d.size());
		CHECK((r == 0) == (eb.size() + 2 <= RRR_HDLC_MAX), "length of %zu bytes, %zu when framed: %d", d.size(), eb.size() + 2, r);
		if (r) { CHECK(l == 0, "length after error"); label("too long"); continue; }
		CHECK(l == eb.size() + 2, "export length is %u, not %zu", l, eb.size() + 2);
		std::unique_ptr<char[]> t(new char[l]); rrr_hdlc_export_frame(t.get(), &wr, db.get(), (rrr_length) d.size()); S f(t.get(), l);
		CHECK(wr == l && f == "~" + eb + "~", "frame is %s, not %s", show(f, 100).c_str(), show("~" + eb + "~", 100).c_str());
		frames.push_back(d);
		if (shared || i == 0) { if (i == 0) w += noise(s, false); w += f; } else w += f;
		if (s.chance(1, 3)) w += S(s.u(3), 0x7e);
		shared = s.flip();
	}
	desc("%zu frames, %zu bytes", frames.size(), w.size()); label_if(frames.size() > 1, "several frames"); if (frames.size() >= 1) nontrivial();
	bool pieces = s.flip(); size_t pos = 0; S out;
	for (size_t i = 0; i < frames.size(); i++) { S i_out; size_t used = 0; size_t p0 = pos; int r = next(s, w, pos, out, pieces); CHECK(r == RRR_HDLC_OK, "frame %zu returns %d", i, r); CHECK(out == frames[i], "frame %zu is %s, not %s", i, show(out, 100).c_str(), show(frames[i], 100).c_str());
		r = import(w, p0, &i_out, &used); CHECK(r == 0 && i_out == out && p0 + used == pos, "import of frame %zu returns %d", i, r); }
	CHECK(next(s, w, pos, out, pieces) == RRR_HDLC_INCOMPLETE && out.empty(), "more frames than sent");
}
// Any data: the same as the reference
static void any(Src &s) {
	S w; size_t n = s.u(8);
	for (size_t i = 0; i < n; i++) switch (s.u(5)) { case 0: w += (char) 0x7e; break; case 1: w += (char) 0x7d; break; case 2: w += s.bytes(s.len(10)); break; case 3: w += "~" + enc_body(gen_data(s)) + "~"; break; case 4: w += noise(s, true); break; case 5: if (s.chance(1, 4)) w += "~" + S(4090 + s.u(10), 'a') + (s.flip() ? "~" : ""); break; }
	desc("%s", show(w, 200).c_str()); size_t pos = 0, rpos = 0; bool pieces = s.flip();
	for (;;) {
		S a, b; size_t p0 = rpos; int r = ref_next(w, rpos, a), g = next(s, w, pos, b, pieces); CHECK(g == (r == 1 ? RRR_HDLC_OK : r == 2 ? RRR_HDLC_SOFT_ERROR : RRR_HDLC_INCOMPLETE), "at %zu parsing returns %d, expected %d", p0, g, r);
		S c; size_t used; int im = import(w, p0, &c, &used); CHECK(im == (r == 1 ? RRR_TYPE_PARSE_OK : r == 2 ? RRR_TYPE_PARSE_SOFT_ERR : RRR_TYPE_PARSE_INCOMPLETE), "import returns %d, expected %d", im, r);
		if (r != 1) { label(r == 2 ? "overflow" : "end"); break; }
		CHECK(a == b && pos == rpos, "frame %s ends at %zu, expected %s to %zu", show(b, 100).c_str(), pos, show(a, 100).c_str(), rpos); CHECK(c == a && p0 + used == rpos, "imported %s", show(c, 100).c_str()); nontrivial(); label("frame");
	}
}
VP_TARGET(roundtrip, 60000, "at least one frame");
VP_TARGET(any, 60000, "at least one frame in the data");
VP_MAIN(vp_lib_init)
