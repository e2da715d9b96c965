// C20: Modbus client: transactions, responses, hostile servers
#include "common.hpp"
#include <list>
extern "C" {
#include "lib/modbus/rrr_modbus.h"
}
VP_LOG_PREFIX
using namespace vp;
typedef std::string S;
static uint64_t g_now;
extern "C" uint64_t vp_time(void) { return g_now; }

struct Req { uint16_t id; int fn; S pdu; size_t want; int *priv; bool sent = false, gone = false; uint64_t at = 0; };
static std::list<Req> *g_reqs; static int g_live; static bool g_fail_create; static int g_cb_ret;
struct Got { S kind; uint16_t id; int fn; S data; int *priv; };
static std::vector<Got> g_got;
static int create(void **r, void *a, void *arg) { CHECK(arg == (void *) &g_got, "argument"); if (g_fail_create) return 1; *r = a; g_live++; return 0; }
static void destroy(void *p) { CHECK(p && *(int *) p == 1, "private data was released twice or is wrong"); *(int *) p = 2; g_live--; }
static void got(const char *k, uint16_t id, int fn, const S &d, void *p, void *arg) { CHECK(arg == (void *) &g_got, "argument"); CHECK(p && *(int *) p == 1, "private data already released"); g_got.push_back({k, id, fn, d, (int *) p}); }
static int cb_err(RRR_MODBUS_ERROR_CALLBACK_ARGS) { got("error", transaction_id, function_code, S(1, (char) error_code), transaction_private_data, arg); return g_cb_ret; }
template <int F> static int cb_read(RRR_MODBUS_BYTE_COUNT_AND_COILS_CALLBACK_ARGS) { CHECK(function_code == F, "callback of function %d for %d", F, function_code); got("read", transaction_id, function_code, S((const char *) coil_status, byte_count), transaction_private_data, arg); return g_cb_ret; }
static S be(unsigned v) { return S() + (char) (v >> 8) + (char) v; }
static int cb_06(RRR_MODBUS_STARTING_ADDRESS_AND_REGISTER_VALUE_CALLBACK_ARGS) { CHECK(function_code == 6, "callback"); got("write", transaction_id, function_code, be(starting_address) + S((const char *) register_value, 2), transaction_private_data, arg); return g_cb_ret; }
static int cb_16(RRR_MODBUS_STARTING_ADDRESS_AND_QUANTITY_CALLBACK_ARGS) { CHECK(function_code == 16, "callback"); got("write", transaction_id, function_code, be(starting_address) + be(quantity), transaction_private_data, arg); return g_cb_ret; }

struct Client {
	struct rrr_modbus_client *c = NULL; std::list<Req> reqs; Req *ring[32] = {}; int wpos = 0, tpos = 0; uint16_t next_id = 0; std::list<int> privs; S rx;
	Client() { g_live = 0; g_got.clear(); g_fail_create = false; g_cb_ret = 0; g_now = 1700000000000000ull; CHECK(rrr_modbus_client_new(&c) == 0, "client");
		struct rrr_modbus_client_callbacks cb = {create, destroy, cb_err, cb_read<1>, cb_read<2>, cb_read<3>, cb_read<4>, cb_06, cb_16, &g_got}; rrr_modbus_client_callbacks_set(c, &cb); }
	~Client() { rrr_modbus_client_destroy(c); }
	// A request; the return value expected from the model
	void request(Src &s) {
		int fn = s.pick({1, 2, 3, 4, 6, 16}); unsigned addr = s.flip() ? s.u(65535) : s.u(20), n = 0; S contents, pdu = S(1, (char) fn) + be(addr); size_t want = 0; privs.push_back(1); int *p = &privs.back(); int r = -1;
		Req *slot = ring[wpos]; int exp = slot ? (slot->sent && slot->at < g_now - 1000000 ? RRR_MODBUS_SOFT_ERROR : RRR_MODBUS_BUSY) : 0; g_fail_create = s.chance(1, 50); if (g_fail_create) exp = 1;
		switch (fn) {
			case 1: n = s.chance(1, 3) ? s.range(1990, 2000) : 1 + s.u(40); want = (n + 7) / 8; pdu += be(n); r = rrr_modbus_client_req_01_read_coils(c, addr, n, p); break;
			case 2: n = s.chance(1, 3) ? s.range(1990, 2000) : 1 + s.u(40); want = (n + 7) / 8; pdu += be(n); r = rrr_modbus_client_req_02_read_discrete_inputs(c, addr, n, p); break;
			case 3: n = s.chance(1, 3) ? s.range(120, 125) : 1 + s.u(10); want = 2 * n; pdu += be(n); r = rrr_modbus_client_req_03_read_holding_registers(c, addr, n, p); break;
			case 4: n = s.chance(1, 3) ? s.range(120, 125) : 1 + s.u(10); want = 2 * n; pdu += be(n); r = rrr_modbus_client_req_04_read_input_registers(c, addr, n, p); break;
			case 6: contents = s.bytes(2); contents.resize(2); pdu += contents; r = rrr_modbus_client_req_06_write_single_register(c, addr, (uint8_t *) &contents[0], p); break;
			case 16: n = s.chance(1, 3) ? s.range(118, 123) : 1 + s.u(10); contents = s.bytes(2 * n); contents.resize(2 * n); { std::unique_ptr<uint8_t[]> b(new uint8_t[2 * n]); memcpy(b.get(), contents.data(), 2 * n); pdu += be(n) + S(1, (char) (2 * n)) + contents; r = rrr_modbus_client_req_16_write_multiple_registers(c, addr, n, b.get(), p); } break;
		}
		g_fail_create = false; CHECK(r == exp, "request returns %d, expected %d", r, exp);
		if (exp == RRR_MODBUS_BUSY) label("busy"); if (exp == RRR_MODBUS_SOFT_ERROR) label("timeout"); if (exp) return;
		reqs.push_back({next_id++, fn, pdu, want, p}); ring[wpos] = &reqs.back(); wpos = (wpos + 1) % 32;
	}
	void write() {
		uint8_t b[7 + 260]; memset(b, 0xa5, sizeof b); rrr_length n = 7 + 253; int r = rrr_modbus_client_write(c, b, &n); Req *q = ring[tpos];
		if (!q || q->sent) { CHECK(r == RRR_MODBUS_DONE, "write of nothing returns %d", r); return; }
		CHECK(r == 0, "write returns %d", r); S w((char *) b, n), want = be(q->id) + be(0) + be((unsigned) q->pdu.size() + 1) + "\xff" + q->pdu; CHECK(w == want, "frame is %s, not %s", show(w, 60).c_str(), show(want, 60).c_str());
		q->sent = true; q->at = g_now; tpos = (tpos + 1) % 32;
	}
	Req *find(uint16_t id) { for (auto &x : ring) if (x && x->sent && x->id == id) return x; return NULL; }
	std::vector<Req *> sent() { std::vector<Req *> v; for (auto &x : ring) if (x && x->sent) v.push_back(x); return v; }
	// Read one frame; the outcome is predicted from the bytes. Returns false at an error
	bool read(Src &s) {
		if (rx.empty()) return true;
		size_t len = rx.size() >= 6 ? (((unsigned char) rx[4]) << 8) + (unsigned char) rx[5] : 0, total = 6 + len; int exp = 0; Got g; bool cb = false; Req *q = NULL; bool complete = false;
		if (rx.size() < 7) exp = RRR_MODBUS_INCOMPLETE; else if (len < 1) exp = RRR_MODBUS_SOFT_ERROR; else if (rx.size() < total) exp = RRR_MODBUS_INCOMPLETE;
		else { complete = true; S pdu = rx.substr(7, len - 1);
			if (pdu.empty() || pdu.size() > 252) exp = RRR_MODBUS_SOFT_ERROR;
			else if (!(q = find((uint16_t) (((unsigned char) rx[0] << 8) + (unsigned char) rx[1])))) exp = RRR_MODBUS_SOFT_ERROR;
			else { int fn = (unsigned char) pdu[0]; S d = pdu.substr(1);
				if (fn == (q->fn | 0x80)) { if (d.size() != 1) exp = RRR_MODBUS_SOFT_ERROR; else { cb = true; g = {"error", q->id, q->fn, d, q->priv}; } }
				else if (fn != q->fn) exp = RRR_MODBUS_SOFT_ERROR;
				else if (fn <= 4) { if (d.size() < 2 || (unsigned char) d[0] != d.size() - 1 || d.size() - 1 != q->want) exp = RRR_MODBUS_SOFT_ERROR; else { cb = true; g = {"read", q->id, fn, d.substr(1), q->priv}; } }
				else { if (d.size() != 4) exp = RRR_MODBUS_SOFT_ERROR; else { cb = true; g = {"write", q->id, fn, d, q->priv}; } } } }
		g_cb_ret = cb && s.chance(1, 20) ? (int) s.pick({RRR_MODBUS_SOFT_ERROR, RRR_MODBUS_HARD_ERROR}) : 0; if (g_cb_ret) exp = g_cb_ret;
		std::unique_ptr<uint8_t[]> b(new uint8_t[rx.size()]); memcpy(b.get(), rx.data(), rx.size()); rrr_length n = (rrr_length) rx.size(); g_got.clear();
		int r = rrr_modbus_client_read(c, b.get(), &n); CHECK(r == exp, "frame %s returns %d, expected %d", show(rx, 60).c_str(), r, exp);
		CHECK(g_got.size() == (cb ? 1u : 0u), "%zu callbacks", g_got.size());
		if (cb) { auto &x = g_got[0]; CHECK(x.kind == g.kind && x.id == g.id && x.fn == g.fn && x.data == g.data && x.priv == g.priv, "%s of transaction %u function %d with %s, expected %s of %u function %d with %s", x.kind.c_str(), x.id, x.fn, show(x.data, 60).c_str(), g.kind.c_str(), g.id, g.fn, show(g.data, 60).c_str()); label(g.kind.c_str()); }
		if (q) { CHECK(*q->priv == 2, "private data is not released with the transaction"); q->gone = true; for (auto &x : ring) if (x == q) x = NULL; }
		if (r == 0) { CHECK(n == total, "%u bytes used of %zu", n, total); rx.erase(0, total); return true; }
		if (r == RRR_MODBUS_INCOMPLETE) { CHECK(n == rx.size(), "size changed"); return true; }
		label_if(complete, "refused"); if (complete) rx.erase(0, total); else rx.clear(); return s.flip(); // the caller closes the connection, or goes on
	}
};
static S good(Src &s, Req *q) {
	S pdu; if (s.chance(1, 6)) pdu = S(1, (char) (q->fn | 0x80)) + (char) s.u(255);
	else if (q->fn <= 4) { S d = s.bytes(q->want); d.resize(q->want, 'x'); pdu = S(1, (char) q->fn) + (char) q->want + d; } else pdu = q->pdu.substr(0, 5);
	return be(q->id) + be(s.chance(1, 10) ? s.u(65535) : 0) + be((unsigned) pdu.size() + 1) + (char) s.u(255) + pdu;
}
static S bad(Src &s, Client &c) {
	auto v = c.sent(); S f = v.empty() ? be(c.next_id) + be(0) + be(3) + "\xff" + (char) 0x83 + "\x02" : good(s, s.pick(v)), pdu = f.substr(7);
	switch (s.u(8)) {
		case 0: f[0] = (char) s.u(255); break; case 1: f[1] = (char) s.u(255); break; case 2: f = be((unsigned) (c.next_id - s.u(40))) + f.substr(2); break;
		case 3: pdu[0] = (char) s.pick({1, 2, 3, 4, 5, 6, 16, 0x80, 0x81, 0x82, 0x83, 0x84, 0x86, 0x90, 0, 255}); goto len;
		case 4: pdu.resize(s.u(pdu.size())); goto len; case 5: pdu += s.bytes(1 + s.len(8)); if (s.chance(1, 6)) pdu.resize(245 + s.u(15), 'z'); goto len;
		case 6: if (pdu.size() > 1) pdu[1] = (char) s.u(255); goto len; case 7: f[5] = (char) s.u(255); f[4] = s.chance(1, 4) ? (char) s.u(255) : 0; return f;
		default: return s.bytes(s.len(30));
	}
	return f;
	len: return f.substr(0, 4) + be((unsigned) pdu.size() + 1) + f[6] + pdu;
}
static void history(Src &s) {
	Client c; bool hostile = s.flip(); size_t n = 5 + s.len(s.chance(1, 8) ? 400 : 60), answers = 0; desc("%zu steps%s", n, hostile ? ", wrong responses" : "");
	if (s.chance(1, 150)) { for (unsigned k = 0; k < 65520; k++) { /* transaction numbers near the wrap */ int *p; c.privs.assign(1, 1); p = &c.privs.back(); CHECK(rrr_modbus_client_req_01_read_coils(c.c, 1, 1, p) == 0, "request"); uint8_t b[300]; rrr_length l = 260; CHECK(rrr_modbus_client_write(c.c, b, &l) == 0, "write"); S r = S((char *) b, 4) + be(4) + "\x01" + "\x01\x01\x01"; l = (rrr_length) r.size(); CHECK(rrr_modbus_client_read(c.c, (const uint8_t *) r.data(), &l) == 0, "read %u", k); g_got.clear(); }
		c.next_id = 65520; c.wpos = c.tpos = 65520 % 32; label("wrap"); }
	for (size_t i = 0; i < n; i++) switch (s.weighted({6, 5, 6, 1, 1})) {
		case 0: c.request(s); break; case 1: c.write(); break;
		case 2: { S f; auto v = c.sent(); if (hostile && s.chance(1, 3)) f = bad(s, c); else if (!v.empty()) { f = good(s, s.pick(v)); answers++; }
			if (f.empty()) break; bool ok = true;
			for (size_t pos = 0, k; ok && pos < f.size(); pos += k) { k = s.chance(2, 3) ? f.size() - pos : 1 + s.u(f.size() - pos - 1); c.rx += f.substr(pos, k); ok = c.read(s); }
			if (!ok) { label("closed"); goto out; } // further frames are not read
			while (c.rx.size() >= 7 && hostile) { size_t before = c.rx.size(); if (!c.read(s)) goto out; if (c.rx.size() == before) break; }
			break; }
		case 3: g_now += s.flip() ? s.u(1000000) : 1000000 + s.u(2); break;
		case 4: for (size_t k = s.u(40); k; k--) { c.request(s); if (s.chance(3, 4)) c.write(); } break;
	}
	out: if (answers > 1) nontrivial(); int live = 0; for (auto &q : c.reqs) if (!q.gone) live++;
	CHECK(g_live == live, "%d private data alive, not %d", g_live, live);
	rrr_modbus_client_destroy(c.c); CHECK(g_live == 0, "%d private data were not released", g_live); CHECK(rrr_modbus_client_new(&c.c) == 0, "client");
}
VP_TARGET(history, 20000, "more than one answer");
VP_MAIN(vp_lib_init)
